// stand-in for the TLS layer of qclient (submodule not present): every byte is "encrypted" by flipping its bits
#pragma once
#include <functional>
#include <string>
namespace qclient {
struct TlsConfig { bool active = false; std::string certificatePath, keyPath, capath; };
enum class FilterType { CLIENT, SERVER };
struct RecvStatus { RecvStatus() {} RecvStatus(bool a, int e, int b) : connectionAlive(a), errcode(e), bytesRead(b) {} bool connectionAlive = false; int errcode = 0; int bytesRead = 0; };
typedef int LinkStatus;
using RecvFunction = std::function<RecvStatus(char *, int, int)>;
using SendFunction = std::function<LinkStatus(const char *, int)>;
class TlsFilter {
public:
  TlsFilter(const TlsConfig &c, const FilterType &, RecvFunction r, SendFunction s) : config(c), rf(r), sf(s) {}
  LinkStatus send(const char *b, int n) { std::string x(b, n); for(char &c : x) c = (char)~c; return sf(x.data(), n); }
  RecvStatus recv(char *b, int n, int t) { RecvStatus st = rf(b, n, t); for(int i = 0; i < st.bytesRead; i++) b[i] = (char)~b[i]; return st; }
  LinkStatus close(int) { return 0; }
private:
  TlsConfig config; RecvFunction rf; SendFunction sf;
};
}
