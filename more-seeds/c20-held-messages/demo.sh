#!/bin/bash
# the tool, built from the working tree in the current directory, must report a runtime error of a step without text
repo="$PWD"; d=/tmp/bladeink-demo-c20-held-messages
mkdir -p "$d" || exit 3
cargo build --offline -q -p rinklecate --target-dir "$d/target" || exit 3
cat > "$d/story.ink" <<'INK'
VAR n = 0
Line one
-> quiet
=== quiet ===
{ n == 0:
  ~ temp later = 1
}
~ n = 10 / n
-> DONE
INK
out="$(timeout 60 "$d/target/debug/rinklecate" -p -j "$d/story.ink" < /dev/null)"
echo "$out"
grep -q '"issues"' <<< "$out"
