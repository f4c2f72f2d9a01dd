#!/bin/bash
# builds the demonstration against the objects of the tree in the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
objs=""
for o in "$r"/ircd/*.o; do
  case $(basename "$o") in
    convert-conf.o|table_gen.o|umkpasswd.o) ;;
    ircd.o) objcopy --redefine-sym main=ircd_main "$o" "$t/ircd.o" && objs="$objs $t/ircd.o" ;;
    *) objs="$objs $o" ;;
  esac
done
gcc -w -g -O1 -DHAVE_CONFIG_H -I"$r" -I"$r/include" -I"$r/ircd" -I"$d" "$d/demo.c" $objs \
  -Wl,--wrap=deliver_it -Wl,--wrap=update_write -Wl,--wrap=close -Wl,--wrap=socket_del -Wl,--wrap=server_die -Wl,--wrap=server_restart \
  -o "$t/demo" -lcrypt -lssl -lcrypto -lm || exit 3
cd "$t" && ulimit -c 0 && timeout 120 ./demo
