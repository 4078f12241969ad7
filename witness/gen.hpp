#pragma once
#include "mon.hpp"
namespace dsl = lexy::dsl;
#define G(name, ...) struct p_##name { static constexpr auto rule = __VA_ARGS__; }
// with automatic whitespace
#define GW(name, ...) struct p_##name { static constexpr auto whitespace = dsl::ascii::blank; static constexpr auto rule = __VA_ARGS__; }
#define W(name, enc) WITNESS(name##__##enc) { vp::check<p_##name, lexy::enc##_encoding>(); }
#define W0(name, enc) WITNESS(name##__##enc) { vp::check<p_##name, lexy::enc##_encoding>("success", nullptr); }
#define WK(name, k) WITNESS(name) { vp_retain(k); vp::check<p_##name, lexy::default_encoding>(); }
#define WL(name, k, n) WITNESS(name) { vp_retain(k); vp_maxlen(n); vp::check<p_##name, lexy::default_encoding>(); }
#define WK0(name, k) WITNESS(name) { vp_retain(k); vp::check<p_##name, lexy::default_encoding>("success", nullptr); }
#define WL0(name, k, n) WITNESS(name) { vp_retain(k); vp_maxlen(n); vp::check<p_##name, lexy::default_encoding>("success", nullptr); }
#define WS(name, enc) WITNESS(name##__##enc##_swar) { vp::check_swar<p_##name, lexy::enc##_encoding>(); }
#define WS0(name, enc) WITNESS(name##__##enc##_swar) { vp::check_swar<p_##name, lexy::enc##_encoding>("success", nullptr); }
#define WSL(name, enc, n) WITNESS(name##__##enc##_swar) { vp_maxlen(n); vp::check_swar<p_##name, lexy::enc##_encoding>(); }
struct tag { static constexpr auto name = "tag"; };
