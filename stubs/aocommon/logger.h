// Analysis stub: declarations only.
#ifndef STUB_AOCOMMON_LOGGER_H
#define STUB_AOCOMMON_LOGGER_H
#include <sstream>
#include <string>
#include <iostream>
namespace aocommon {
class Logger {
 public:
  enum LoggerLevel { kNoLevel = 5, kFatalLevel = 4, kErrorLevel = 3,
                     kWarningLevel = 2, kInfoLevel = 1, kDebugLevel = 0 };
  enum VerbosityLevel { kQuietVerbosity, kNormalVerbosity, kVerboseVerbosity };
  struct LogWriter {
    template <typename T> LogWriter& operator<<(const T&);
    LogWriter& operator<<(const char*);
    LogWriter& operator<<(std::ostream& (*)(std::ostream&));
    void Flush();
    bool IsActive() const;
  };
  static LogWriter Debug, Info, Warn, Error, Fatal, Progress;
  static bool IsVerbose();
  static void SetVerbosity(VerbosityLevel);
  static void SetLogTime(bool);
  static void SetLogMemory(bool);
};
}
#endif
