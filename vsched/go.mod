module vsched

go 1.24
