CONSTANT Scenarios <- C08S
