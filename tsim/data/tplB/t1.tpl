%content%-%content%-%title%