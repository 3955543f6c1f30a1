package log

import "github.com/unit-io/unitdb/zz_verif/vzerolog"

var Logger vzerolog.Logger

func Info() *vzerolog.Event  { return Logger.Info() }
func Debug() *vzerolog.Event { return Logger.Debug() }
func Warn() *vzerolog.Event  { return Logger.Warn() }
func Error() *vzerolog.Event { return Logger.Error() }
func Fatal() *vzerolog.Event { return Logger.Fatal() }
