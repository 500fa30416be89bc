package config

const genesisJson = "{}"
