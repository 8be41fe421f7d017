module sdsverif

go 1.19

require github.com/DataDog/dd-sensitive-data-scanner/sds-go/go v0.0.0

replace github.com/DataDog/dd-sensitive-data-scanner/sds-go/go => /repo/sds-go/go
