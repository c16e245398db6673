CONSTANT Scenarios <- C02S
