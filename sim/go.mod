module verif.local/sim

go 1.23

require (
	github.com/lyraproj/issue v0.0.0-20190606092846-e082d6813d15
	github.com/lyraproj/puppet-parser v0.0.0
)

replace github.com/lyraproj/puppet-parser => /repo
