// groups of integration methods, so that harness parts can be compiled in parallel (-DGROUP=k)
#pragma once
#include "spaceHub.hpp"
#define FAM4(X, B) X(B) X(AR_##B) X(Chain_##B) X(AR_##B##_Chain)
#define FAMC(X, B) X(Const_##B) X(Const_AR_##B) X(Const_Chain_##B) X(Const_AR_##B##_Chain)
#define FAM4P(X, B, P) X(B##P) X(AR_##B##P) X(Chain_##B##P) X(AR_##B##_Chain##P)
#define FAMCP(X, B, P) X(Const_##B##P) X(Const_AR_##B##P) X(Const_Chain_##B##P) X(Const_AR_##B##_Chain##P)
#define FAMBS(X) X(BS) X(AR_BS) X(Chain_BS) X(AR_Chain)
#define FAMBSP(X, P) X(BS##P) X(AR_BS##P) X(Chain_BS##P) X(AR_Chain##P)
#include <type_traits>
template <typename T, typename = void> struct is_regu : std::false_type {};
template <typename T> struct is_regu<T, std::void_t<decltype(T::regu_type)>> : std::true_type {};
