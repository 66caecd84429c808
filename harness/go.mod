module dxverif

go 1.21

require github.com/suiyunonghen/dxsvalue v0.0.0

require (
	github.com/json-iterator/go v1.1.7
	github.com/suiyunonghen/DxCommonLib v0.2.5
)

require golang.org/x/text v0.3.4 // indirect

replace github.com/suiyunonghen/dxsvalue => /repo
