module verif/harness

go 1.20

require pgregory.net/rapid v1.3.0

replace pgregory.net/rapid => ../third_party/rapid
