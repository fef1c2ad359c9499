package logrus

func (l *Logger) Trace(args ...interface{}) {}
func (l *Logger) Tracef(f string, args ...interface{}) {}
func (l *Logger) Traceln(args ...interface{}) {}
func (l *Logger) Debug(args ...interface{}) {}
func (l *Logger) Debugf(f string, args ...interface{}) {}
func (l *Logger) Debugln(args ...interface{}) {}
func (l *Logger) Info(args ...interface{}) {}
func (l *Logger) Infof(f string, args ...interface{}) {}
func (l *Logger) Infoln(args ...interface{}) {}
func (l *Logger) Print(args ...interface{}) {}
func (l *Logger) Printf(f string, args ...interface{}) {}
func (l *Logger) Println(args ...interface{}) {}
func (l *Logger) Warn(args ...interface{}) {}
func (l *Logger) Warnf(f string, args ...interface{}) {}
func (l *Logger) Warnln(args ...interface{}) {}
func (l *Logger) Warning(args ...interface{}) {}
func (l *Logger) Warningf(f string, args ...interface{}) {}
func (l *Logger) Warningln(args ...interface{}) {}
func (l *Logger) Error(args ...interface{}) {}
func (l *Logger) Errorf(f string, args ...interface{}) {}
func (l *Logger) Errorln(args ...interface{}) {}
func (l *Logger) Fatal(args ...interface{}) {}
func (l *Logger) Fatalf(f string, args ...interface{}) {}
func (l *Logger) Fatalln(args ...interface{}) {}
func (l *Logger) Panic(args ...interface{}) {}
func (l *Logger) Panicf(f string, args ...interface{}) {}
func (l *Logger) Panicln(args ...interface{}) {}
func (l *Logger) Log(v Level, args ...interface{}) {}
func (l *Logger) Logf(v Level, f string, args ...interface{}) {}
func (l *Logger) Logln(v Level, args ...interface{}) {}
func (l *Entry) Trace(args ...interface{}) {}
func (l *Entry) Tracef(f string, args ...interface{}) {}
func (l *Entry) Traceln(args ...interface{}) {}
func (l *Entry) Debug(args ...interface{}) {}
func (l *Entry) Debugf(f string, args ...interface{}) {}
func (l *Entry) Debugln(args ...interface{}) {}
func (l *Entry) Info(args ...interface{}) {}
func (l *Entry) Infof(f string, args ...interface{}) {}
func (l *Entry) Infoln(args ...interface{}) {}
func (l *Entry) Print(args ...interface{}) {}
func (l *Entry) Printf(f string, args ...interface{}) {}
func (l *Entry) Println(args ...interface{}) {}
func (l *Entry) Warn(args ...interface{}) {}
func (l *Entry) Warnf(f string, args ...interface{}) {}
func (l *Entry) Warnln(args ...interface{}) {}
func (l *Entry) Warning(args ...interface{}) {}
func (l *Entry) Warningf(f string, args ...interface{}) {}
func (l *Entry) Warningln(args ...interface{}) {}
func (l *Entry) Error(args ...interface{}) {}
func (l *Entry) Errorf(f string, args ...interface{}) {}
func (l *Entry) Errorln(args ...interface{}) {}
func (l *Entry) Fatal(args ...interface{}) {}
func (l *Entry) Fatalf(f string, args ...interface{}) {}
func (l *Entry) Fatalln(args ...interface{}) {}
func (l *Entry) Panic(args ...interface{}) {}
func (l *Entry) Panicf(f string, args ...interface{}) {}
func (l *Entry) Panicln(args ...interface{}) {}
func (l *Entry) Log(v Level, args ...interface{}) {}
func (l *Entry) Logf(v Level, f string, args ...interface{}) {}
func (l *Entry) Logln(v Level, args ...interface{}) {}
