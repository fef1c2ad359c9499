package logrus

import (
	"bytes"
	"io"
	"os"
	"runtime"
	"time"
)

type Level uint32

const (
	PanicLevel Level = iota
	FatalLevel
	ErrorLevel
	WarnLevel
	InfoLevel
	DebugLevel
	TraceLevel
)

func (l Level) String() string { return "level" }

func ParseLevel(s string) (Level, error) { return InfoLevel, nil }

var AllLevels = []Level{}

type Fields map[string]interface{}
type Formatter interface {
	Format(*Entry) ([]byte, error)
}
type Hook interface {
	Levels() []Level
	Fire(*Entry) error
}
type LevelHooks map[Level][]Hook
type Logger struct {
	Out          io.Writer
	Hooks        LevelHooks
	Formatter    Formatter
	ReportCaller bool
	Level        Level
	ExitFunc     func(int)
}
type Entry struct {
	Logger  *Logger
	Data    Fields
	Time    time.Time
	Level   Level
	Caller  *runtime.Frame
	Message string
	Buffer  *bytes.Buffer
}
type TextFormatter struct{}

func (*TextFormatter) Format(*Entry) ([]byte, error) { return nil, nil }

func New() *Logger                       { return &Logger{Out: os.Stderr} }
func (l *Logger) WithFields(Fields) *Entry { return &Entry{Logger: l} }
func (l *Logger) SetLevel(Level)         {}
func (l *Logger) GetLevel() Level        { return l.Level }
func (l *Logger) SetOutput(io.Writer)    {}
func (l *Logger) SetReportCaller(bool)   {}
func (l *Logger) SetFormatter(Formatter) {}
func (l *Logger) AddHook(Hook)           {}
func (l *Logger) Writer() *io.PipeWriter { return nil }
func (l *Logger) WriterLevel(Level) *io.PipeWriter {
	return nil
}
func (l *Logger) IsLevelEnabled(Level) bool { return false }
func (e *Entry) WithFields(Fields) *Entry   { return e }
func (e *Entry) WithField(string, interface{}) *Entry { return e }
func (e *Entry) Writer() *io.PipeWriter     { return nil }
func (e *Entry) WriterLevel(Level) *io.PipeWriter {
	return nil
}
func (e Entry) HasCaller() bool { return false }
