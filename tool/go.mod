module dsimtool

go 1.21
