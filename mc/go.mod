module verif.local/mc

go 1.27

require github.com/zenazn/goji v0.0.0

replace github.com/zenazn/goji => /repo
