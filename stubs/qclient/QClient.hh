// stand-in for the client library (submodule not present): only what the server's own code mentions; requests go to a function that a harness sets
#pragma once
#include <memory>
#include <string>
#include <vector>
#include <atomic>
#include <chrono>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <mutex>
#include <string_view>
#include <fcntl.h>
#include <unistd.h>
#include <sys/socket.h>
#include <qclient/TlsFilter.hh>
#define REDIS_REPLY_STRING 1
#define REDIS_REPLY_ARRAY 2
#define REDIS_REPLY_INTEGER 3
#define REDIS_REPLY_NIL 4
#define REDIS_REPLY_STATUS 5
#define REDIS_REPLY_ERROR 6
struct redisReply { int type = 0; long long integer = 0; size_t len = 0; char *str = nullptr; size_t elements = 0; redisReply **element = nullptr; };
namespace qclient {
using redisReplyPtr = std::shared_ptr<redisReply>;
inline std::string describeRedisReply(const redisReplyPtr &) { return "reply"; }
class Handshake { public: enum class Status { INVALID = 0, VALID_INCOMPLETE, VALID_COMPLETE }; virtual ~Handshake() {} virtual std::vector<std::string> provideHandshake() = 0; virtual Status validateResponse(const redisReplyPtr &) = 0; virtual void restart() = 0; virtual std::unique_ptr<Handshake> clone() const = 0; };
class SetClientNameHandshake : public Handshake { public: SetClientNameHandshake(const std::string &) {} std::vector<std::string> provideHandshake() override { return {}; } Status validateResponse(const redisReplyPtr &) override { return Status::VALID_COMPLETE; } void restart() override {} std::unique_ptr<Handshake> clone() const override { return nullptr; } };
struct RetryStrategy { static RetryStrategy NoRetries() { return {}; } };
struct BackpressureStrategy { static BackpressureStrategy Default() { return {}; } };
enum class LogLevel { kFatal, kError, kWarn, kInfo, kDebug };
inline std::string logLevelToString(LogLevel) { return "level"; }
class Logger { public: virtual ~Logger() {} virtual void print(LogLevel level, int line, const std::string &file, const std::string &msg) = 0; protected: LogLevel logLevel = LogLevel::kWarn; };
class Options { public: bool transparentRedirects = false; RetryStrategy retryStrategy; BackpressureStrategy backpressureStrategy; std::unique_ptr<Logger> logger; std::vector<std::unique_ptr<Handshake>> shakes; void chainHmacHandshake(const std::string &) {} void chainHandshake(std::unique_ptr<Handshake> h) { shakes.push_back(std::move(h)); } };
class QClient {
public:
  using Net = std::function<std::future<redisReplyPtr>(const std::string &host, int port, std::vector<std::string> request)>;
  static Net &net() { static Net n; return n; }
  QClient() {}
  QClient(const std::string &h, int p, Options &&o) : host(h), port(p), opts(std::move(o)) {}
  template<class T> std::future<redisReplyPtr> execute(const T &payload) { std::vector<std::string> r; for(auto &&x : payload) r.emplace_back(x.data(), x.size()); return send(std::move(r)); }
  template<class... A> std::future<redisReplyPtr> exec(const A &...a) { return send(std::vector<std::string>{std::string(a)...}); }
private:
  std::future<redisReplyPtr> send(std::vector<std::string> r) { if(net()) return net()(host, port, std::move(r)); std::promise<redisReplyPtr> p; p.set_value(nullptr); return p.get_future(); }
  std::string host; int port = 0; Options opts;
};
}
