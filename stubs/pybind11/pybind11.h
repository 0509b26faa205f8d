// Declarations of the part of pybind11 that the Python interface uses: for type checking only, never compiled or run.
#pragma once
#include <functional>
#include <string>
#include <type_traits>
#include <utility>
namespace pybind11 {
struct object {
    template <class... T> object(T&&...);
    template <class T> object& operator=(T&&);
};
struct str : object { using object::object; };
struct handle : object { using object::object; };
struct return_value_policy_t {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <class... T> struct keep_alive { };
template <class... T> struct call_guard { };
struct gil_scoped_release { };
struct is_operator { };
struct arithmetic { };
struct dynamic_attr { };
struct arg_v { };
struct arg {
    explicit arg(const char*);
    template <class T> arg_v operator=(T&&) const;
    arg& noconvert(bool = true);
};
struct kw_only { };
struct args { };
struct kwargs { };
template <class... A> struct init_t { };
template <class F> struct factory_t { };
template <class... A, std::enable_if_t<(sizeof...(A) != 1 || true), bool> = true> init_t<A...> init();
template <class F> factory_t<F> init(F&&) { return {}; }
namespace detail {
template <class... A> struct overload_cast_impl {
    constexpr overload_cast_impl() { }
    template <class R> constexpr auto operator()(R (*pf)(A...)) const noexcept -> decltype(pf) { return pf; }
    template <class R, class C> constexpr auto operator()(R (C::*pmf)(A...), std::false_type = {}) const noexcept -> decltype(pmf) { return pmf; }
    template <class R, class C> constexpr auto operator()(R (C::*pmf)(A...) const, std::true_type) const noexcept -> decltype(pmf) { return pmf; }
};
} // namespace detail
template <class... A> static constexpr detail::overload_cast_impl<A...> overload_cast{};
static constexpr auto const_ = std::true_type{};
struct module {
    object attr(const char*);
    object& doc();
    module def_submodule(const char*, const char* = "");
    template <class F, class... X> module& def(const char*, F&&, X&&...) { return *this; }
};
using module_ = module;
template <class T, class... B> struct class_ {
    template <class S, class... X> class_(S&&, const char*, X&&...);
    template <class F, class... X> class_& def(const char*, F&&, X&&...) { return *this; }
    template <class F, class... X> class_& def_static(const char*, F&&, X&&...) { return *this; }
    template <class... A, class... X> class_& def(init_t<A...>, X&&...)
    {
        static_assert(sizeof(new T(std::declval<A>()...)) > 0);
        return *this;
    }
    template <class F, class... X> class_& def(factory_t<F>, X&&...) { return *this; }
    template <class F, class... X> class_& def_property_readonly(const char*, F&&, X&&...) { return *this; }
    template <class F, class G, class... X> class_& def_property(const char*, F&&, G&&, X&&...) { return *this; }
    template <class F, class... X> class_& def_readonly(const char*, F&&, X&&...) { return *this; }
    template <class F, class... X> class_& def_readwrite(const char*, F&&, X&&...) { return *this; }
    object attr(const char*);
};
template <class T> struct enum_ : class_<T> {
    template <class S, class... X> enum_(S&&, const char*, X&&...);
    enum_& value(const char*, T, const char* = nullptr);
    enum_& export_values();
};
} // namespace pybind11
#define PYBIND11_MODULE(name, variable) void name##_module(pybind11::module& variable)
