#!/bin/bash
# regenerates the throw-away test certificates (committed)
cd "$(dirname "$0")/certs" || exit 1
for k in 1 2 3 4 5; do
openssl ecparam -name prime256v1 -genkey -noout -out k$k.pem
openssl req -x509 -new -key k$k.pem -out c$k.pem -days 36500 -subj "/CN=node$k" 
done
