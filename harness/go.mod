module gostverif

go 1.20

require github.com/myyrakle/gost v0.0.0

replace github.com/myyrakle/gost => /repo
