/* analysis stub */
