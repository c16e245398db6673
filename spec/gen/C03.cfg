CONSTANT Scenarios <- C03S
