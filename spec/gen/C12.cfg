CONSTANT Scenarios <- C12S
