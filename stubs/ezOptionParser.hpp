// Declaration-only stand-in for ezOptionParser (never linked).
#pragma once
#include <map>
#include <ostream>
#include <string>
#include <vector>
namespace ez {
class ezOptionValidator { public: ezOptionValidator(char); ezOptionValidator(const char* type, const char* op = 0, const char* list = 0, bool insensitive = false); };
class OptionGroup { public: void getInt(int&); void getDouble(double&); void getString(std::string&); void getLong(long&); void getULong(unsigned long&); void getFloat(float&); void getStrings(std::vector<std::string>&); void getInts(std::vector<int>&); bool isSet; };
class ezOptionParser {
 public:
  void add(const char* defaults, bool required, int expectArgs, char delim, const char* help, const char* flag1, ezOptionValidator* validator = 0);
  void add(const char* defaults, bool required, int expectArgs, char delim, const char* help, const char* flag1, const char* flag2, ezOptionValidator* validator = 0);
  void add(const char* defaults, bool required, int expectArgs, char delim, const char* help, const char* flag1, const char* flag2, const char* flag3, ezOptionValidator* validator = 0);
  void add(const char* defaults, bool required, int expectArgs, char delim, const char* help, const char* flag1, const char* flag2, const char* flag3, const char* flag4, ezOptionValidator* validator = 0);
  void parse(int argc, const char* argv[]); int isSet(const char*); OptionGroup* get(const char*);
  void getUsage(std::string& usage, int width = 80); bool gotRequired(std::vector<std::string>&); bool gotExpected(std::vector<std::string>&); bool gotValid(std::vector<std::string>&, std::vector<std::string>&);
  std::string doubleSpace; std::string overview; std::string syntax; std::string example; std::string footer;
  std::vector<std::string*> firstArgs; std::vector<std::string*> lastArgs; std::vector<std::string*> unknownArgs;
};
}
