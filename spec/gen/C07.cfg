CONSTANT Scenarios <- C07S
