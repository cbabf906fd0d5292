module simrt

go 1.25
