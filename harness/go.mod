module verifharness

go 1.24

require (
	github.com/qiniu/text v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/qiniu/text => /repo
