#!/bin/sh
# RUSTC_WRAPPER: only the library under test, and the crate its generic code is instantiated in, are instrumented.
case " $* " in
  *" --crate-name poreader "*|*" --crate-name drive "*)
    exec "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
case " $* " in
  *" --crate-name interleave "*) exec "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
exec "$@"
