module yield

go 1.24
