CONSTANT Scenarios <- C20S
