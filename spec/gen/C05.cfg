CONSTANT Scenarios <- C05S
