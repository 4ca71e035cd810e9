// replaced by the check of P32
