"""densities a user of the configuration files might define: two modules with classes of the same name"""
