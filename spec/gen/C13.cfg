CONSTANT Scenarios <- C13S
