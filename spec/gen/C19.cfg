CONSTANT Scenarios <- C19S
