package lumberjack

type Logger struct {
	Filename   string
	MaxSize    int
	MaxAge     int
	MaxBackups int
	LocalTime  bool
	Compress   bool
}

func (*Logger) Write(p []byte) (int, error) { return len(p), nil }
func (*Logger) Close() error                { return nil }
func (*Logger) Rotate() error               { return nil }
