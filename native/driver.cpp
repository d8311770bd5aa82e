// Drives the native serving code: one JSON command per line on stdin, one JSON answer per line on stdout.
#include <fstream>
#include "reagent/serving/cli/Server.h"
#include "reagent/serving/core/DiskConfigProvider.h"
#include "reagent/serving/core/InMemoryLogJoiner.h"
#include "reagent/serving/core/LocalRealTimeCounter.h"
#include "reagent/serving/core/OperatorFactory.h"

using namespace reagent;
using nlohmann::json;

namespace {

// ---------------------------------------------------------------- operators that record when and on what they ran
// The record takes its slots from a relaxed counter, so that recording adds no ordering between the operators (which
// would hide races from ThreadSanitizer).
struct Event {
  std::string what, name, plan;
  json data;
};
std::atomic<size_t> g_next{0};
std::vector<Event> g_events(1 << 14);

void record(const std::string& what, const std::string& name, const std::string& plan, json data) {
  size_t i = g_next.fetch_add(1, std::memory_order_relaxed);
  if (i < g_events.size()) g_events[i] = Event{what, name, plan, std::move(data)};
}

std::string digest(const json& j) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : j.dump()) h = (h ^ c) * 1099511628211ULL;
  std::ostringstream s;
  s << std::hex << h;
  return s.str();
}

json inputsJson(const StringOperatorDataMap& inputs) {
  json j = json::object();
  for (const auto& it : inputs) {
    json v;
    constant_value_to_json(it.second, v);
    j[it.first] = v;
  }
  return j;
}

class Trace : public Operator {
 public:
  Trace(const std::string& name, const std::string& plan, const StringStringMap& deps, const DecisionService* const s)
      : Operator(name, plan, deps, s) {}
  OperatorData run(const DecisionRequest& request, const StringOperatorDataMap& inputs) override {
    json in = inputsJson(inputs);
    record("start", name_, planName_, {{"inputs", in}, {"request_id", request.request_id}});
    auto d = inputs.find("delay");
    if (d != inputs.end()) std::this_thread::sleep_for(std::chrono::microseconds(std::get<int64_t>(d->second)));
    auto f = inputs.find("fail");
    if (f != inputs.end()) {
      record("fail", name_, planName_, {});
      throw std::runtime_error("operator failed: " + std::get<std::string>(f->second));
    }
    OperatorData out = result(name_ + "#" + digest({name_, in, request.request_id}));
    json o;
    constant_value_to_json(out, o);
    record("end", name_, planName_, o);
    return out;
  }
  void giveFeedback(const Feedback& feedback, const StringOperatorDataMap& inputs, const OperatorData& output) override {
    json o;
    constant_value_to_json(output, o);
    record("feedback", name_, planName_, {{"inputs", inputsJson(inputs)}, {"output", o}, {"feedback", feedback}});
  }

 protected:
  virtual OperatorData result(const std::string& id) { return id; }
};

class TraceScores : public Trace {
 public:
  using Trace::Trace;

 protected:
  OperatorData result(const std::string& id) override {
    return StringDoubleMap{{id, double(id.size())}, {"c", 0.5}};
  }
};

class TraceRanked : public Trace {
 public:
  using Trace::Trace;

 protected:
  OperatorData result(const std::string& id) override { return RankedActionList{{id, 0.25}, {"z", 1.0 / 3}}; }
};

REGISTER_OPERATOR(Trace, "Trace");
REGISTER_OPERATOR(TraceScores, "TraceScores");
REGISTER_OPERATOR(TraceRanked, "TraceRanked");

// ---------------------------------------------------------------- a service with in-memory parts
class FakeScorer : public ActionValueScorer {
 public:
  StringDoubleMap predict(const DecisionRequest& request, int model, int snapshot) override {
    StringDoubleMap out;
    auto names = Operator::getActionNamesFromRequest(request);
    for (size_t i = 0; i < names.size(); i++) out[names[i]] = model * 100.0 + snapshot + double(names[i].size()) / 7;
    return out;
  }
};

struct Service {
  std::shared_ptr<InMemoryLogJoiner> joiner;
  std::shared_ptr<LocalRealTimeCounter> counter;
  std::shared_ptr<SharedParameterHandler> parameters;
  std::shared_ptr<DecisionService> service;
  std::shared_ptr<Server> server;
  size_t http = 0;
  std::map<std::string, std::shared_ptr<Operator>> ops;
};
std::map<std::string, Service> g_services;

template <class T> json roundtrip(const json& j) {
  T t = j.get<T>();
  json out = t;
  return out;
}

json handle(const json& c) {
  const std::string cmd = c.at("cmd");
  if (cmd == "control") {
    auto& control = tf::Control::get();
    std::lock_guard<std::mutex> l(control.mutex);
    control.threads = c.value("threads", 4);
    control.dawdle_us = c.value("dawdle_us", 0);
    control.rng.seed(c.value("seed", 1));
    return {};
  }
  if (cmd == "srand") {
    std::srand(c.at("seed").get<unsigned>());
    return {};
  }
  if (cmd == "trace") {
    json out = json::array();
    size_t n = std::min(g_next.load(), g_events.size());
    for (size_t i = 0; i < n; i++)
      out.push_back({{"what", g_events[i].what}, {"name", g_events[i].name}, {"plan", g_events[i].plan}, {"data", g_events[i].data}});
    g_next = 0;
    return {{"events", out}, {"order", tf::Control::get().order}};
  }
  if (cmd == "roundtrip") {
    const std::string type = c.at("type");
    const json& v = c.at("value");
    if (type == "DecisionRequest") return roundtrip<DecisionRequest>(v);
    if (type == "DecisionResponse") return roundtrip<DecisionResponse>(v);
    if (type == "Feedback") return roundtrip<Feedback>(v);
    if (type == "ActionFeedback") return roundtrip<ActionFeedback>(v);
    if (type == "DecisionWithFeedback") return roundtrip<DecisionWithFeedback>(v);
    if (type == "ConstantValue") {
      json out;
      constant_value_to_json(json_to_constant_value(v), out);
      return out;
    }
    throw std::runtime_error("no such type: " + type);
  }
  if (cmd == "uuids") {
    json out = json::array();
    for (int i = 0; i < c.at("count").get<int>(); i++) out.push_back(generateUuid4());
    return out;
  }
  const std::string id = c.at("service");
  if (cmd == "service") {
    Service s;
    s.joiner = std::make_shared<InMemoryLogJoiner>(c.value("log_path", ""));
    s.counter = std::make_shared<LocalRealTimeCounter>();
    if (c.count("window")) s.counter->setWindowSize(c.at("window"));
    s.parameters = std::make_shared<SharedParameterHandler>();
    s.service = std::make_shared<DecisionService>(
        std::make_shared<DiskConfigProvider>(c.at("config_dir").get<std::string>()), std::make_shared<FakeScorer>(),
        s.joiner, s.counter, s.parameters);
    s.http = HttpServer::all().size();
    s.server = std::make_shared<Server>(s.service, 3000);
    s.server->start();
    g_services[id] = s;
    return {};
  }
  auto& s = g_services.at(id);
  if (cmd == "close") {
    s.server->shutdown();
    g_services.erase(id);
    return {};
  }
  if (cmd == "plan") {
    s.service->createPlan(c.at("name"), c.at("config").get<DecisionConfig>());
    return {};
  }
  if (cmd == "describe") {  // what the service understood of a plan
    auto plan = s.service->getPlan(c.at("name"));
    json ops = json::array(), constants = json::object();
    for (const auto& op : plan->getOperators()) ops.push_back({{"name", op->getName()}, {"inputs", op->getInputDepMap()}});
    for (const auto& it : plan->getConstants()) {
      json v;
      constant_value_to_json(it.second, v);
      constants[it.first] = v;
    }
    const auto& config = plan->getConfig();
    json types = json::object();
    for (const auto& d : config.operators) types[d.name] = d.op_name;
    return {{"operators", ops}, {"types", types}, {"constants", constants}, {"output", plan->getOutputOperatorName()},
            {"num_actions_to_choose", config.num_actions_to_choose}, {"reward_function", config.reward_function},
            {"reward_aggregator", int(config.reward_aggregator)}};
  }
  if (cmd == "post") {
    auto r = HttpServer::all().at(s.http)->vf_post(c.at("path"), c.at("body"));
    return {{"status", int(r->status)}, {"body", r->body}, {"written", r->written}};
  }
  if (cmd == "logged") {
    json out = json::array();
    for (const auto& d : s.joiner->getLoggedData()) out.push_back(d);
    return out;
  }
  if (cmd == "join") {
    return json(s.joiner->deserializeAndJoinDecisionAndFeedback(c.at("records").get<StringList>()));
  }
  if (cmd == "op") {  // makes an operator ("as") and keeps it, or runs one kept earlier
    const std::string as = c.at("as");
    if (c.count("op_name")) {
      OperatorDefinition d;
      d.name = c.value("name", as);
      d.op_name = c.at("op_name");
      for (const auto& n : c.value("input_names", StringList())) d.input_dep_map[n] = n;
      s.ops[as] = OperatorFactory::getInstance()->createOp(c.value("plan", "plan"), d, s.service.get());
    }
    auto& op = s.ops.at(as);
    json out = json::array();
    if (c.count("inputs")) {
      DecisionRequest request = c.at("request").get<DecisionRequest>();
      StringOperatorDataMap inputs;
      for (const auto& it : c.at("inputs").items()) inputs[it.key()] = json_to_constant_value(it.value());
      for (int i = 0; i < c.value("times", 1); i++) {
        json v;
        constant_value_to_json(op->run(request, inputs), v);
        out.push_back(v);
      }
    }
    return out;
  }
  if (cmd == "opfeedback") {
    StringOperatorDataMap inputs;
    for (const auto& it : c.at("inputs").items()) inputs[it.key()] = json_to_constant_value(it.value());
    s.ops.at(c.at("as"))->giveFeedback(c.at("feedback").get<Feedback>(), inputs, json_to_constant_value(c.at("output")));
    return {};
  }
  if (cmd == "counter") {
    const std::string what = c.at("what"), key = c.at("key");
    if (what == "add") s.counter->addValue(key, c.at("value").get<double>());
    if (what == "clear") s.counter->clear(key);
    return {{"samples", s.counter->getNumSamples(key)}, {"mean", s.counter->getMean(key)}, {"variance", s.counter->getVariance(key)}};
  }
  if (cmd == "parameter") return s.parameters->getValues(c.at("name"));
  throw std::runtime_error("no such command: " + cmd);
}

}  // namespace

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    json answer;
    try {
      answer["ok"] = handle(json::parse(line));
    } catch (const std::exception& e) {
      answer["error"] = e.what();
      answer["type"] = typeid(e).name();
    }
    std::cout << answer.dump() << std::endl;
  }
  for (auto& it : g_services) it.second.server->shutdown();
  return 0;
}
