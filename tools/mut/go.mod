module mut

go 1.23
