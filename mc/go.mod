module verifmc

go 1.23

require (
	github.com/lkmio/avformat v0.0.0
	vshim v0.0.0
)

replace github.com/lkmio/avformat => /repo

replace vshim => ../vshim
