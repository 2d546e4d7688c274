module yield

go 1.27
