// Stand-in for Simple-Web-Server without sockets: handlers are registered as usual and called through vf_post().
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <regex>
#include <condition_variable>
#include <string>
#include <system_error>
#include <thread>
namespace SimpleWeb {
using error_code = std::error_code;
enum class StatusCode { success_ok = 200, client_error_bad_request = 400, server_error_internal_server_error = 500 };
struct HTTP {};
template <class P> class Server {
 public:
  struct Response {
    StatusCode status = StatusCode::success_ok;
    std::string body;
    int written = 0;
    void write(StatusCode s, const std::string& b = "") { status = s, body = b, written++; }
    void write(const std::string& b) { write(StatusCode::success_ok, b); }
  };
  struct Content {
    std::string text;
    std::string string() { return text; }
  };
  struct Request { Content content; };
  struct { unsigned short port = 0; size_t thread_pool_size = 1; } config;
  std::map<std::string, std::map<std::string, std::function<void(std::shared_ptr<Response>, std::shared_ptr<Request>)>>> resource;
  std::function<void(std::shared_ptr<Request>, const error_code&)> on_error;
  Server() { all().push_back(this); }
  static std::vector<Server*>& all() { static std::vector<Server*> v; return v; }
  void start() { std::unique_lock<std::mutex> l(m_); c_.wait(l, [this] { return stopped_; }); }
  void stop() { std::lock_guard<std::mutex> l(m_); stopped_ = true; c_.notify_all(); }
  std::shared_ptr<Response> vf_post(const std::string& path, const std::string& text) {
    auto response = std::make_shared<Response>();
    auto request = std::make_shared<Request>();
    request->content.text = text;
    for (auto& r : resource)
      if (std::regex_match(path, std::regex(r.first)) && r.second.count("POST")) { r.second.at("POST")(response, request); return response; }
    response->status = StatusCode(404);
    return response;
  }
 private:
  std::mutex m_;
  std::condition_variable c_;
  bool stopped_ = false;
};
}  // namespace SimpleWeb
