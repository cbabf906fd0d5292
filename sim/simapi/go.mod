module simapi

go 1.25
