CONSTANT Scenarios <- C10S
