CONSTANT Scenarios <- C15S
