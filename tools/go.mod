module tools

go 1.24
