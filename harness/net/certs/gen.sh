#!/bin/bash
# Regenerates the certificates in this folder (valid 2000 to 2199).
set -e
cd "$(dirname "$0")"; T=$(mktemp -d)
ca() { # name
  openssl ecparam -name prime256v1 -genkey -noout | openssl pkcs8 -topk8 -nocrypt -out $T/$1.key
  openssl req -new -key $T/$1.key -subj "/CN=$1" -out $T/$1.csr
  sign $1 $1 "basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign,cRLSign" 20000101000000Z 21990101000000Z -selfsign
}
sign() { # name ca ext start end opts
  mkdir -p $T/db; : > $T/db/index; echo $(openssl rand -hex 8) > $T/db/serial
  printf "[ca]\ndefault_ca=d\n[d]\ndatabase=$T/db/index\nnew_certs_dir=$T/db\nserial=$T/db/serial\ndefault_md=sha256\npolicy=p\nunique_subject=no\n[p]\ncommonName=supplied\n" > $T/cnf
  printf "$3\n" > $T/ext
  local c="-cert $T/$2.pem"; [ "$6" = -selfsign ] && c=-selfsign
  openssl ca -batch -notext -config $T/cnf $c -keyfile $T/$2.key -in $T/$1.csr -out $T/$1.pem -startdate $4 -enddate $5 -extfile $T/ext 2>/dev/null
}
leaf() { # name ca san start end
  openssl ecparam -name prime256v1 -genkey -noout | openssl pkcs8 -topk8 -nocrypt -out $T/$1.key
  openssl req -new -key $T/$1.key -subj "/CN=$1" -out $T/$1.csr
  sign $1 $2 "basicConstraints=CA:FALSE\nsubjectAltName=$3\nextendedKeyUsage=serverAuth" $4 $5
  cat $T/$1.pem $T/$2.pem > $1.pem; cp $T/$1.key $1.key
}
ca ca; ca rogue
leaf good ca DNS:localhost,IP:127.0.0.1 20000101000000Z 21990101000000Z
leaf other ca DNS:other.example 20000101000000Z 21990101000000Z
leaf expired ca DNS:localhost,IP:127.0.0.1 20000101000000Z 20010101000000Z
leaf rogue-good rogue DNS:localhost,IP:127.0.0.1 20000101000000Z 21990101000000Z
cp $T/ca.pem ca.pem; cp $T/rogue.pem rogue.pem
rm -r "$T"
