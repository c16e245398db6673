CONSTANT Scenarios <- C04S
