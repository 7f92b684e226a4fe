#!/bin/bash
# Builds the extension package from the current directory's tree (quick after build.sh), starts a
# private PostgreSQL with it in a scratch directory, runs demo.sql and compares with expected.txt.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
S=$(mktemp -d /tmp/vpdemo.XXXXXX)
PID=
cleanup() {
    [ -n "$PID" ] && kill -QUIT "$PID" 2>/dev/null && wait "$PID" 2>/dev/null
    case "$S" in /tmp/vpdemo.*) rm -rf "$S" ;; esac
}
trap cleanup EXIT
chmod 755 "$S"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$repo/target"
PG=/usr/lib/postgresql/16
SH=/usr/share/postgresql/16
(cd extension && cargo pgrx package --debug --out-dir "$S/pkg" --no-default-features --features "$FEATURES" -c $PG/bin/pg_config) > "$S/build.log" 2>&1 || { tail -20 "$S/build.log"; exit 99; }
I="$S/i/lib/postgresql/16"
E="$S/i/share/postgresql/16"
mkdir -p "$I/bin" "$I/lib" "$E/extension"
cp $PG/bin/postgres $PG/bin/initdb "$I/bin/"
for f in $PG/lib/*; do case "$f" in */timescaledb_toolkit*) ;; *) ln -s "$f" "$I/lib/" ;; esac; done
for f in $SH/*; do case "$f" in */extension) ;; *) ln -s "$f" "$E/" ;; esac; done
for f in $SH/extension/*; do case "$f" in */timescaledb_toolkit*) ;; *) ln -s "$f" "$E/extension/" ;; esac; done
cp "$S"/pkg$PG/lib/timescaledb_toolkit.so "$I/lib/"
cp "$S"/pkg$SH/extension/timescaledb_toolkit* "$E/extension/"
install -d -o postgres -g postgres -m 700 "$S/d" "$S/sock"
chmod 755 "$S/sock"
run() { setpriv --reuid=postgres --regid=postgres --clear-groups env -i PATH=/usr/bin:/bin HOME=/ LC_ALL=C.UTF-8 "$@"; }
cd /
run "$I/bin/initdb" -D "$S/d" -E UTF8 --locale=C.UTF-8 -A trust --no-sync -U postgres > "$S/initdb.log" 2>&1 || { cat "$S/initdb.log"; exit 98; }
cat >> "$S/d/postgresql.conf" <<X
listen_addresses = ''
unix_socket_directories = '$S/sock'
fsync = off
timezone = 'UTC'
datestyle = 'ISO, MDY'
jit = off
statement_timeout = '60s'
X
setpriv --reuid=postgres --regid=postgres --clear-groups env -i PATH=/usr/bin:/bin HOME=/ LC_ALL=C.UTF-8 "$I/bin/postgres" -D "$S/d" > "$S/pg.log" 2>&1 &
PID=$!
for i in $(seq 100); do psql -qAt -h "$S/sock" -U postgres -c 'SELECT 1' postgres > /dev/null 2>&1 && break; sleep 0.2; done
psql -q -h "$S/sock" -U postgres -c 'CREATE EXTENSION timescaledb_toolkit' postgres > "$S/ext.log" 2>&1 || { cat "$S/ext.log"; exit 97; }
psql -X -qAt -h "$S/sock" -U postgres -f "$here/demo.sql" postgres > "$S/out.txt" 2>&1
if [ -n "$DEMO_WRITE" ]; then cp "$S/out.txt" "$DEMO_WRITE"; exit 0; fi
if diff "$here/expected.txt" "$S/out.txt"; then echo "demo: as expected"; exit 0; fi
echo "demo: differs from what is expected"
exit 1
