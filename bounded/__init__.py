import fresh as _fresh
