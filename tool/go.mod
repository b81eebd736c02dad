module veriftool

go 1.22
