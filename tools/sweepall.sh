cd "$(dirname "$0")/.."
ALL="$(ls checks | grep '^c[0-9]' | sed 's/.py//' | tr a-z A-Z | tr '\n' ' ')"
./sweep.sh "$ALL" "$1" $2
