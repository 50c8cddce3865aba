// only here so that cargo builds the dependencies of magnesia
