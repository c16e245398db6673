CONSTANT Scenarios <- C17S
