// The templates are examples of this package.
