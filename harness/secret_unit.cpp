// Parses requests with secrets at every verbosity; everything a log could show
// goes to stderr.   file=<items separated by NUL>  v=<verbosity>
#include "hk.h"
#include <wdt/WdtTransferRequest.h>
#include <wdt/Sender.h>
#include <wdt/Receiver.h>
#include <gflags/gflags.h>
#include <glog/logging.h>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace facebook::wdt;
using std::string;

int main(int argc, char** argv) {
  hk::init();
  FLAGS_logtostderr = true;
  FLAGS_minloglevel = 0;
  string file;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    if (a.substr(0, 5) == "file=") {
      file = a.substr(5);
    } else if (a.substr(0, 2) == "v=") {
      FLAGS_v = atoi(a.c_str() + 2);
    }
  }
  google::InitGoogleLogging(argv[0]);
  std::ifstream in(file, std::ios::binary);
  string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  size_t at = 0;
  int n = 0;
  while (at < all.size()) {
    size_t e = all.find('\0', at);
    string item = all.substr(at, e - at);
    at = e == string::npos ? all.size() : e + 1;
    fprintf(stderr, "\nITEM %d\n", n++);
    fflush(stderr);
    if (item[0] == 'E') {
      EncryptionParams p;
      ErrorCode c = EncryptionParams::unserialize(item.substr(1), p);
      std::cerr << "SHOWN " << p.getLogSafeString() << " " << errorCodeToStr(c) << std::endl;
      printf("RES %d %s %s\n", n - 1, errorCodeToStr(c).c_str(), c == OK ? p.getUrlSafeString().c_str() : "-");
    } else {
      WdtTransferRequest r(item.substr(1));
      std::cerr << "SHOWN " << r.getLogSafeString() << "\n" << r << std::endl;
      string full = r.genWdtUrlWithSecret();
      if (item[0] == 'S' && r.errorCode == OK) {
        // whoever is given the request logs it, too
        r.directory = "/nonexistent-directory-of-the-check";
        r.hostName = "127.0.0.1";
        WdtOptions o;
        o.max_retries = 1;
        o.connect_timeout_millis = 50;
        Sender s(r);
        s.setWdtOptions(o);
        std::ostringstream os;
        auto rep = s.transfer();
        os << *rep;
        std::cerr << "SHOWN " << os.str() << s.getTransferRequest() << std::endl;
      }
      printf("RES %d %s %s\n", n - 1, errorCodeToStr(r.errorCode).c_str(), full.c_str());
    }
  }
  printf("DONE %d %d\n", n, n);
  return 0;
}
