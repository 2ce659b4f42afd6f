module vh

go 1.23

require github.com/siebenmann/smtpd v0.0.0

replace github.com/siebenmann/smtpd => ../standin/smtpd
