ID="b31-tee-block-write"; PROPERTY="P24"
NEEDS="A console sink that accepts only part of a write while a log file is configured as well."
BREAKS="Strings are handed to the sinks as a whole and the file only receives what the console accepted, so the log is incomplete."
EDITS=[("src/umpire/util/OutputBuffer.hpp","""  int overflow(int ch) override;
""","""  int overflow(int ch) override;
  std::streamsize xsputn(const char* text, std::streamsize length) override;
"""),("src/umpire/util/OutputBuffer.cpp","""int OutputBuffer::sync()
""","""std::streamsize OutputBuffer::xsputn(const char* text, std::streamsize length)
{
  std::streamsize written{length};

  if (d_console_stream) {
    written = d_console_stream->sputn(text, written);
  }

  if (d_file_stream) {
    written = d_file_stream->sputn(text, written);
  }

  return written;
}

int OutputBuffer::sync()
""")]
DEMO=r'''
#include "umpire/util/OutputBuffer.hpp"
#include <cstdio>
#include <ostream>
#include <sstream>
struct Small : std::streambuf { std::string got; int overflow(int c) override { if (got.size() >= 3) return EOF; got += char(c); return c & 255; } };
int main() {
  Small s; std::ostream con(&s);
  std::ostringstream file;
  umpire::util::OutputBuffer b;
  b.setConsoleStream(&con); b.setFileStream(&file);
  std::ostream o(&b);
  o << "abcd";
  if (o) { puts("failure not reported"); return 1; }
  if (file.str() != "abcd") { printf("the file has only %s\n", file.str().c_str()); return 1; }
  return 0;
}
'''
