module verif/replay

go 1.17

require (
	github.com/panjf2000/gnet v1.6.3
	github.com/yusank/glob v0.3.0
	github.com/yusank/godis v0.0.0
)

require (
	github.com/panjf2000/ants/v2 v2.4.7 // indirect
	github.com/valyala/bytebufferpool v1.0.0 // indirect
	go.uber.org/atomic v1.9.0 // indirect
	go.uber.org/multierr v1.7.0 // indirect
	go.uber.org/zap v1.19.1 // indirect
	golang.org/x/sys v0.0.0-20211204120058-94396e421777 // indirect
	gopkg.in/natefinch/lumberjack.v2 v2.0.0 // indirect
)

replace github.com/yusank/godis => /repo
