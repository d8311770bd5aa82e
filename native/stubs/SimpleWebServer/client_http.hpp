#pragma once
namespace SimpleWeb {
template <class P> class Client {};
}  // namespace SimpleWeb
