#!/bin/bash
# usage: run.sh <property> [quick|thorough] [more flags of the check binary]
# Builds the check of the property from /repo's working tree and runs it.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
case $ID in
  C08|C10|C11|C12|C15) G=lib; B=lib ;;
  C01|C02|C03|C04|C05|C06|C07|C09|C13|C14|C30|C33) G=pki; B=pki ;;
  C16|C17|C25|C32) G=sync; B=sync ;;
  C20) G=ov; B=ov ;;
  C24) G=ca; B=ca ;;
  C29) G=octo; B="octo octorpki-race ctrpki-race" ;;
  C18|C19|C21|C22|C27|C28|C31|C34|C35) G=octo; B="octo octorpki" ;;
  C23|C26) G=cli; B="cli localrpki ctrpki octorpki" ;;
  *) echo "unknown property $ID"; exit 2 ;;
esac
"$VERIF/build.sh" $B || { echo "the check of $ID could not be built"; exit 2; }
mkdir -p "$VERIF/evidence" "$VERIF/replays"
exec "$VERIF/bin/$G" -prop "$ID" -tier "$TIER" -seed "${VERIF_SEED:-1}" -verif "$VERIF" "$@"
