# sourced: builds the analyser into a temporary folder, sets SA
for g in /opt/veriftools/go1.27.3 /usr/local/go; do
  if [ -x "$g/bin/go" ]; then export PATH="$g/bin:$PATH"; break; fi
done
export GOROOT="$(go env GOROOT)" GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=vendor CGO_ENABLED=0
export SAVERIF="${SAVERIF:-/verif}"
mkdir -p /verif/bin
SA=/verif/bin/sa
(cd /verif/sa && go build -o "$SA.$$" . && mv -f "$SA.$$" "$SA")
