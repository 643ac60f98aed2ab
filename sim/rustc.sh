#!/bin/sh
# cargo's rustc wrapper: the simulator and the library under test get the standard library's
# checks on unchecked accesses, whatever the profile says about debug assertions
rustc="$1"
shift
case " $* " in
*" --crate-name poly2tri_rs "* | *" --crate-name p2tsim "*) exec "$rustc" "$@" -Zub-checks=yes ;;
*) exec "$rustc" "$@" ;;
esac
