module verif/replay

go 1.16

require github.com/zyedidia/gpeg v0.0.0

replace github.com/zyedidia/gpeg => /repo
