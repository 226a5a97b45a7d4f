// A library without the symbol of a formatter plugin (C15).
int not_a_plugin;
